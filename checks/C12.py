import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import framework, validate
framework.main("C12", validate.check, explain="validate() is interpreted abstractly once per index member of the asset (spec/indices.txt) with that member out of range in one element of every collection on its path: no path may return Error::None, and the member must not be used as an index first; reads of optionals and constant indices in validate() must be guarded")
