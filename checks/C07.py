import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import framework, jsonout
framework.main("C07", jsonout.check07, explain="every text of the asset that is appended between quotes must be escaped; escapeString is interpreted as a transducer over all 256 characters: decoding its result as JSON must give the scanned text")
