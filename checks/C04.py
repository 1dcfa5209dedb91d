import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import framework, exportmap
framework.main("C04", exportmap.check, explain="one abstract run of the exporter per asset member (spec/mapping.txt): the member of one element holds a value the parser does not assume (or is empty); every path of writeJson has to write exactly that value, in the right form, at the JSON location from which the parser fills the member, and nowhere else; nothing may be written for an empty member")
